package cekit

import (
	"io"
	stdlog "log"
)

var quiet = stdlog.New(io.Discard, "", 0)
