package main

import "encoding/json"

// apis are the library level workloads, registered by name.
var apis = map[string]func(par json.RawMessage) interface{}{}
