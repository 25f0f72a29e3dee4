package ant

import (
	"testing"
	"time"
)

func TestVerifC10(t *testing.T) { fetchesReplay(t, "C10", 40*time.Second) }
