module verif/harness

go 1.25.5

require (
	github.com/GannettDigital/PaesslerAG_jsonpath v0.0.0-20230913165611-a0c86cbdaddb
	github.com/GannettDigital/gojsonschema v0.0.0-20230605143309-773ed8aacc5c
	github.com/GannettDigital/jsonparser v0.0.0-20200924160044-4a0259e915f8
	github.com/GannettDigital/msgp v1.2.0-gannett
	github.com/actgardner/gogen-avro/v7 v7.3.1
	github.com/antchfx/xmlquery v1.5.0
	github.com/microcosm-cc/bluemonday v1.0.27
	github.com/stretchr/testify v1.11.1
	golang.org/x/exp v0.0.0-20251209150349-8475f28825e9
	golang.org/x/sync v0.19.0
	golang.org/x/tools v0.40.0
)

require (
	github.com/PaesslerAG/gval v1.2.4 // indirect
	github.com/antchfx/xpath v1.3.5 // indirect
	github.com/aymerick/douceur v0.2.0 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/golang/groupcache v0.0.0-20241129210726-2c02b8208cf8 // indirect
	github.com/golang/snappy v1.0.0 // indirect
	github.com/gorilla/css v1.0.1 // indirect
	github.com/philhofer/fwd v1.2.0 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/shopspring/decimal v1.4.0 // indirect
	github.com/xeipuuv/gojsonpointer v0.0.0-20190905194746-02993c407bfb // indirect
	github.com/xeipuuv/gojsonreference v0.0.0-20180127040603-bd5ef7bd5415 // indirect
	golang.org/x/mod v0.31.0 // indirect
	golang.org/x/net v0.48.0 // indirect
	golang.org/x/text v0.32.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

require github.com/GannettDigital/jstransform v0.0.0

replace github.com/GannettDigital/jstransform => /repo
