package timeutils

import (
	"time"

	ghost "github.com/sinclairtarget/git-who/internal/zzghost"
)

// Max and Min return the later and the earlier of two instants.
//
//verif:property C01,C02,C03,C04
func Contract_MaxMin(a, b time.Time) {
	mx, mn := Max(a, b), Min(a, b)
	ghost.Ensures("Max is one of its arguments", mx.Equal(a) || mx.Equal(b))
	ghost.Ensures("Max is not before either argument", !mx.Before(a) && !mx.Before(b))
	ghost.Ensures("Min is one of its arguments", mn.Equal(a) || mn.Equal(b))
	ghost.Ensures("Min is not after either argument", !mn.After(a) && !mn.After(b))
}
