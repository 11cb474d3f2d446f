package main

import def "github.com/COVESA/vss-tools/binary/go_parser/datamodel"

func fields(n *def.Node_t) string { return enc(n.Min) + enc(n.Max) + enc(n.DefaultAllowed) }
