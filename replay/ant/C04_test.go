package ant

import (
	"testing"
	"time"
)

func TestVerifC04(t *testing.T) {
	eScriptedReplay(t, "C04")
	eCrawlsReplay(t, "C04", 40*time.Second)
}
