package crypto

import (
	"io"

	"github.com/kisom/psignify/signify"
)

// VerifSeal and VerifOpen are what the package's own tests call, too.
var (
	VerifSeal func(*signify.Public, io.Reader, int, io.Writer) error = seal
	VerifOpen func(*signify.Private, io.Reader, io.Writer) error     = open
)
