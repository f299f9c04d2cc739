module gearsverif

go 1.26.0

require (
	github.com/chanjarster/gears v0.0.0
	github.com/go-redis/redis/v7 v7.2.0
	pgregory.net/rapid v1.3.0
)

replace github.com/chanjarster/gears => /repo
