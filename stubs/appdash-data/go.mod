module sourcegraph.com/sourcegraph/appdash-data

go 1.21
