package ant

import (
	"testing"
	"time"
)

func TestVerifC06(t *testing.T) {
	eScriptedReplay(t, "C06")
	eCrawlsReplay(t, "C06", 40*time.Second)
}
