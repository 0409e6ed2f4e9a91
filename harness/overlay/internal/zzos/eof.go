package zzos

import "io"

var eof = io.EOF
