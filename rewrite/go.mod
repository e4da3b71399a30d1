module verifrewrite

go 1.18
