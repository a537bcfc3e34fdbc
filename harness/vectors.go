package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
)

type ints []byte

func (b *ints) UnmarshalJSON(j []byte) error {
	var v []int
	if err := json.Unmarshal(j, &v); err != nil {
		return err
	}
	*b = make([]byte, len(v))
	for i, x := range v {
		(*b)[i] = byte(x)
	}
	return nil
}

// event is one event of a behaviour of the specification.
type event struct {
	Op string `json:"op"`
	N  int    `json:"n"`
	B  ints   `json:"b"`
	E  string `json:"e"`
	C  int    `json:"c"`
	ID int    `json:"id"`
	Ar int    `json:"arg"`
	V  []int  `json:"v"`
}

type vector struct {
	Kind string  `json:"kind"`
	Src  ints    `json:"src"`
	Dn   int     `json:"dn"`
	Eof  bool    `json:"eof"`
	Ns   int     `json:"ns"`
	Nd   int     `json:"nd"`
	Dst  ints    `json:"dst"`
	E    string  `json:"e"`
	Hist []event `json:"hist"`
}

// loadVectors reads what the specification generated, one for each line.
func loadVectors() (vs []vector) {
	if *scen == "" {
		return nil
	}
	f, err := os.Open(*scen)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(nil, 1<<24)
	for s.Scan() {
		var v vector
		if err := json.Unmarshal(s.Bytes(), &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		vs = append(vs, v)
	}
	return vs
}
