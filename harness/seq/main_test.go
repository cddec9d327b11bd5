package seq

import (
	"io"
	"log"
	"testing"

	"verifharness/core"
)

func init() { log.SetOutput(io.Discard) }

func TestMain(m *testing.M)   { core.Main(m) }
func TestWorker(t *testing.T) { core.Worker(t) }
