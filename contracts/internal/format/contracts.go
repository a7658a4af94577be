package format

import (
	"fmt"
	"time"
	"unicode/utf8"

	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// Number prints every digit below a million, a thousands separator from 1,000.
//
//verif:property C18
func Contract_Number(num int) {
	ghost.Requires("a count is not negative", num >= 0)
	out := Number(num)
	ghost.Ensures("below 1,000: all digits", ghost.Imp(num < 1000, func() bool { return out == fmt.Sprintf("%d", num) }))
	ghost.Ensures("below 1,000,000: all digits with a separator", ghost.Imp(num >= 1000 && num < 1_000_000, func() bool { return out == fmt.Sprintf("%d,%03d", num/1000, num%1000) }))
	ghost.Ensures("up to 100 million: millions with one decimal", ghost.Imp(num >= 1_000_000 && num <= 100_000_000, func() bool { return out == fmt.Sprintf("%.1fm", float32(num)/1_000_000) }))
	ghost.Ensures("beyond: more than 99 million", ghost.Imp(num > 100_000_000, func() bool { return out == ">99m" }))
}

func specAge(d time.Duration) string {
	const (
		day   = 24 * time.Hour
		week  = 7 * day
		month = 30 * day
		year  = 365 * day
	)
	n := func(unit time.Duration) int { return int(d / unit) }
	switch {
	case d < time.Hour:
		return fmt.Sprintf("%d min. ago", n(time.Minute))
	case d < 2*time.Hour:
		return fmt.Sprintf("%d hour ago", n(time.Hour))
	case d < day:
		return fmt.Sprintf("%d hr. ago", n(time.Hour))
	case d < 2*day:
		return fmt.Sprintf("%d day ago", n(day))
	case d < week:
		return fmt.Sprintf("%d days ago", n(day))
	case d < 2*week:
		return fmt.Sprintf("%d week ago", n(week))
	case d < month:
		return fmt.Sprintf("%d weeks ago", n(week))
	case d < 2*month:
		return fmt.Sprintf("%d month ago", n(month))
	case d < year:
		return fmt.Sprintf("%d mon. ago", n(month))
	case d < 2*year:
		return fmt.Sprintf("%d year ago", n(year))
	case d < 100*year:
		return fmt.Sprintf("%d yr. ago", n(year))
	}
	return ">99 yr. ago"
}

// RelativeTime names the largest applicable unit and how many have elapsed.
//
//verif:property C18
func Contract_RelativeTime(now, t time.Time) {
	ghost.Requires("the commit is not in the future", !now.Before(t))
	out := RelativeTime(now, t)
	ghost.Ensures("largest unit and whole number of units", out == specAge(now.Sub(t)))
}

// Abbrev never exceeds the column; an ASCII name keeps its beginning.
//
//verif:property C18
func Contract_Abbrev(s string, max int) {
	ghost.Requires("there is a column", max >= 1)
	out := Abbrev(s, max)
	ghost.Ensures("a short ASCII name is unchanged", ghost.Imp(len(s) == utf8.RuneCountInString(s) && len(s) <= max, func() bool { return out == s }))
	ghost.Ensures("a long ASCII name is cut and marked", ghost.Imp(len(s) == utf8.RuneCountInString(s) && len(s) > max, func() bool { return out == s[:max-1]+"…" }))
}
