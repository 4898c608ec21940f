package main

import "testing"

func TestMain(m *testing.M) { main() }
