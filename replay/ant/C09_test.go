package ant

import (
	"testing"
	"time"
)

func TestVerifC09(t *testing.T) { fetchesReplay(t, "C09", 40*time.Second) }
