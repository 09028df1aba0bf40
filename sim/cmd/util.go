//go:build go1.21

package main

import "strconv"

func itoa(n int) string { return strconv.Itoa(n) }

func quoteASCII(s string) string { return strconv.QuoteToASCII(s) }
