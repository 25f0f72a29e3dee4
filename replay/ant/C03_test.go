package ant

import (
	"testing"
	"time"
)

func TestVerifC03(t *testing.T) {
	eScriptedReplay(t, "C03")
	eCrawlsReplay(t, "C03", 40*time.Second)
}
