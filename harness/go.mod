module vh

go 1.25.7

require (
	github.com/pb33f/libopenapi v0.0.0
	go.yaml.in/yaml/v4 v4.0.0-rc.6
)

require (
	github.com/bahlo/generic-list-go v0.2.0 // indirect
	github.com/buger/jsonparser v1.1.2 // indirect
	github.com/pb33f/jsonpath v0.8.2 // indirect
	github.com/pb33f/ordered-map/v2 v2.3.1 // indirect
	golang.org/x/sync v0.22.0 // indirect
)

replace github.com/pb33f/libopenapi => /repo
