module github.com/lib/pq

go 1.22

require verifsim v0.0.0

replace verifsim => ../../sim
