package ant

import (
	"testing"
	"time"
)

func TestVerifC07(t *testing.T) {
	eScriptedReplay(t, "C07")
	eCrawlsReplay(t, "C07", 40*time.Second)
}
