module verif/mc

go 1.16

require (
	github.com/roy2220/fsm v0.6.1
	github.com/roy2220/plainkv v0.0.0
)

replace github.com/roy2220/plainkv => /repo
