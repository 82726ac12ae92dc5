module github.com/consensys/gnark

go 1.21
