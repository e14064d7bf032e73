module goinspect

go 1.23
