package revision

import (
	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

func SpecIsHash(s string) bool {
	k := 0
	if len(s) > 0 && s[0] == '^' {
		k = 1
	}
	return len(s) == k+40 && ghost.AllInt(k, k+40, func(i int) bool {
		return '0' <= s[i] && s[i] <= '9' || 'a' <= s[i] && s[i] <= 'f'
	})
}

// Exactly 40 hexadecimal digits, perhaps after a caret.
//
//verif:property C19,C10
func Contract_IsFullHash(argument string) {
	ghost.Ensures("full hash", IsFullHash(argument) == SpecIsHash(argument))
}
