package conc

import (
	"io"
	"log"
	"testing"

	"verifharness/core"
	"verifharness/mc"
)

func init() {
	log.SetOutput(io.Discard)
	core.Hook = func(op string) {
		if len(op) < 5 || op[len(op)-5:] != ".done" {
			mc.Step(op)
		}
	}
}

func TestMain(m *testing.M)   { core.Main(m) }
func TestWorker(t *testing.T) { core.Worker(t) }
