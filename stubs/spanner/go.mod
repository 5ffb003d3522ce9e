module github.com/googleapis/go-sql-spanner

go 1.22

require verifsim v0.0.0

replace verifsim => ../../sim
