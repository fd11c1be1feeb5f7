// Package rubi_snapshot is a stand-in for the generated Rubi rule snapshot.
package rubi_snapshot

import "fmt"

func Asset(name string) ([]byte, error) { return nil, fmt.Errorf("asset %s not found", name) }
