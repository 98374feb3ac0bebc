//go:build go1.24

package main

import (
	"io"

	"github.com/gin-gonic/gin"

	"recengine/internal/zzverif/lib"
)

var checks = map[string]lib.Check{}

func main() {
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter = io.Discard
	gin.DefaultErrorWriter = io.Discard
	lib.Main(checks)
}
