module vharness

go 1.26

// as for a program of /repo's own Go version: seeding math/rand has an effect
godebug randseednop=0

require (
	github.com/ahKevinXy/go-web-tools v0.0.0
	github.com/anishathalye/porcupine v1.3.1
	gorm.io/gorm v1.24.6
	pgregory.net/rapid v1.3.0
)

require (
	github.com/jinzhu/inflection v1.0.0 // indirect
	github.com/jinzhu/now v1.1.5 // indirect
	golang.org/x/exp v0.0.0-20230321023759-10a507213a29 // indirect
	gorm.io/plugin/soft_delete v1.2.0 // indirect
)
replace github.com/ahKevinXy/go-web-tools => /repo
