package main

import (
	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// Escaping hides every "--" from the flag package; unescaping brings the
// argument list back as it was typed.
//
//verif:property C19
//verif:assume the placeholder ^-- itself is never typed as an argument (main.go: "Seems unlikely to be used?")
func Contract_Terminator(args []string) {
	ghost.Requires("the placeholder is not itself an argument", ghost.AllInt(0, len(args), func(i int) bool { return args[i] != "^--" }))

	esc := escapeTerminator(args)
	ghost.Ensures("escaping keeps the number of arguments", len(esc) == len(args))
	ghost.Ensures("no separator is left for the flag package", ghost.AllInt(0, len(esc), func(i int) bool { return esc[i] != "--" }))
	ghost.Ensures("other arguments are untouched", ghost.AllInt(0, len(args), func(i int) bool { return args[i] == "--" || esc[i] == args[i] }))

	out := unescapeTerminator(esc)
	ghost.Ensures("same number of arguments", len(out) == len(args))
	ghost.Ensures("as typed", ghost.AllInt(0, len(args), func(i int) bool { return out[i] == args[i] }))
}

//verif:inv Terminator
func Inv_Escape(p ghost.Pos, args []string, newArgs []string) bool {
	return len(newArgs) == int(p) && ghost.AllInt(0, int(p), func(i int) bool {
		return (args[i] == "--" && newArgs[i] == "^--") || (args[i] != "--" && newArgs[i] == args[i])
	})
}

//verif:inv Terminator
func Inv_Unescape(p ghost.Pos, args []string, newArgs []string) bool {
	return len(newArgs) == int(p) && ghost.AllInt(0, int(p), func(i int) bool {
		return newArgs[i] == args[i]
	})
}

// at most one of the first n flags is set
func specAtMostOne(flags []bool, n int) bool {
	return ghost.AllInt(0, n, func(i int) bool {
		return ghost.AllInt(0, n, func(j int) bool { return !flags[i] || !flags[j] || i == j })
	})
}

// Flags are accepted exactly when at most one is given.
//
//verif:property C19
func Contract_IsOnlyOne(flags []bool) {
	ok := isOnlyOne(flags...)
	ghost.Ensures("at most one flag", ok == specAtMostOne(flags, len(flags)))
}

//verif:inv IsOnlyOne
func Inv_IsOnlyOne(p ghost.Pos, flags []bool, foundOne bool) bool {
	return specAtMostOne(flags, int(p)) && foundOne == ghost.AnyInt(0, int(p), func(i int) bool { return flags[i] })
}
