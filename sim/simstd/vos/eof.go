package vos

import "io"

var eof = io.EOF
