module github.com/urfave/cli/v2

go 1.19
