// Package xml stands in for encoding/xml: encoders keep the values they are given.
package xml

import "io"

// Header is the first line.
const Header = `<?xml version="1.0" encoding="UTF-8"?>` + "\n"

// Name is a name.
type Name struct{ Space, Local string }

// Encoder keeps values.
type Encoder struct{ w io.Writer }

// Encoded lists the values encoded so far.
var Encoded []interface{}

// NewEncoder makes an encoder.
func NewEncoder(w io.Writer) *Encoder { return &Encoder{w} }

func (e *Encoder) Indent(prefix, indent string) {}
func (e *Encoder) Flush() error                 { return nil }
func (e *Encoder) Close() error                 { return nil }

// Encode keeps v and writes a mark.
func (e *Encoder) Encode(v interface{}) error {
	Encoded = append(Encoded, v)
	_, err := e.w.Write([]byte("<xml/>"))
	return err
}

// Marshal keeps v.
func Marshal(v interface{}) ([]byte, error) {
	Encoded = append(Encoded, v)
	return []byte("<xml/>"), nil
}

// MarshalIndent keeps v.
func MarshalIndent(v interface{}, prefix, indent string) ([]byte, error) { return Marshal(v) }
