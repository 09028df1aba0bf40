//go:build go1.21

package main

import "github.com/npillmayer/uax/verifsim/simrt"

// bidiText makes a paragraph in the notation of test mode.
func bidiText(s *simrt.Stream, max int) string {
	const chars = "aAb B1()[].,=<>"
	n := size(s, max)
	b := make([]byte, n)
	for i := range b {
		b[i] = chars[s.Intn(len(chars))]
	}
	return string(b)
}
