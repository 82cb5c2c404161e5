module github.com/roy2220/fsm

go 1.13
