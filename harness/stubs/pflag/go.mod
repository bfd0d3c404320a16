module github.com/spf13/pflag

go 1.18
