module aaverif

go 1.26

require (
	github.com/256dpi/oauth2/v2 v2.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/stretchr/testify v1.4.0 // indirect
	gopkg.in/yaml.v2 v2.2.7 // indirect
)

replace github.com/256dpi/oauth2/v2 => /repo
