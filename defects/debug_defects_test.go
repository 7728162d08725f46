package debug

import "testing"

// C36: a logger is only handed out with a supported level
func TestDefectNegativeLevel(t *testing.T) {
	if lg, err := NewLogger(-1, "x", "stdout"); err == nil || lg != nil && err == nil {
		t.Fatal("a logger with level -1 was handed out")
	}
}
