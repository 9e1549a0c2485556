//go:build verifov

package eng

import "github.com/lesismal/arpc/verifhook"

func init() { setYield = verifhook.Set }
