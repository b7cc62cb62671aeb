module golang.org/x/net

go 1.19
