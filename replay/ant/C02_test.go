package ant

import (
	"testing"
	"time"
)

func TestVerifC02(t *testing.T) {
	eScriptedReplay(t, "C02")
	eCrawlsReplay(t, "C02", 40*time.Second)
}
