// Package appdash_data stands in for sourcegraph.com/sourcegraph/appdash-data,
// which is not available offline, so that the packages importing it can be
// type-checked. Only its one used name is declared.
package appdash_data

import "net/http"

// Data contains the static files of the web UI.
var Data http.FileSystem
