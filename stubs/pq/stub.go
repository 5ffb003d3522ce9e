// Package pq stands in for the real database driver: it registers the simulated one.
package pq

import "verifsim/drv"

const loaded = drv.Loaded

var _ = loaded
