// Package spannerdriver stands in for the real database driver: it registers the simulated one.
package spannerdriver

import "verifsim/drv"

const loaded = drv.Loaded

var _ = loaded
