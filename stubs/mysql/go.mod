module github.com/go-sql-driver/mysql

go 1.22

require verifsim v0.0.0

replace verifsim => ../../sim
