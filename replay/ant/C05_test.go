package ant

import (
	"testing"
	"time"
)

func TestVerifC05(t *testing.T) {
	eScriptedReplay(t, "C05")
	eCrawlsReplay(t, "C05", 40*time.Second)
}
