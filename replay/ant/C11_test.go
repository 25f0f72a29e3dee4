package ant

import (
	"testing"
	"time"
)

func TestVerifC11(t *testing.T) { fetchesReplay(t, "C11", 40*time.Second) }
