package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"strings"
	"sync"

	"go.mongodb.org/mongo-driver/bson"
	kit "vkit"
)

// fakeMongo is a stand-in for a MongoDB server: it speaks as much of the wire
// protocol as a client needs to drop, fill and query collections.
type fakeMongo struct {
	l     net.Listener
	mu    sync.Mutex
	data  map[string][]bson.D // by namespace
	fault string              // the command that fails
	batch int                 // documents in a batch; 0: all
	left  bson.A              // of the cursor being read
}

func startMongo() *fakeMongo {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		kit.Bug("%v", err)
	}
	f := &fakeMongo{l: l, data: map[string][]bson.D{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go f.serve(c)
		}
	}()
	return f
}

func (f *fakeMongo) url() string { return "mongodb://" + f.l.Addr().String() }

func (f *fakeMongo) serve(c net.Conn) {
	defer c.Close()
	for {
		var head [16]byte
		if _, err := io.ReadFull(c, head[:]); err != nil {
			return
		}
		size := int(binary.LittleEndian.Uint32(head[:]))
		if size < 16 || size > 1<<24 {
			return
		}
		body := make([]byte, size-16)
		if _, err := io.ReadFull(c, body); err != nil {
			return
		}
		id, op := head[4:8], binary.LittleEndian.Uint32(head[12:])
		var cmd bson.D
		var db string
		var err error
		switch op {
		case 2004: // OP_QUERY
			rest := body[4:]
			i := bytes.IndexByte(rest, 0)
			if i < 0 {
				return
			}
			db = strings.TrimSuffix(string(rest[:i]), ".$cmd")
			err = bson.Unmarshal(rest[i+1+8:], &cmd)
		case 2013: // OP_MSG
			cmd, err = readMsg(body)
			for _, e := range cmd {
				if e.Key == "$db" {
					db, _ = e.Value.(string)
				}
			}
		default:
			return
		}
		if err != nil || len(cmd) == 0 {
			return
		}
		raw, err := bson.Marshal(f.answer(db, cmd))
		if err != nil {
			return
		}
		var out []byte
		le := func(n uint32) { out = binary.LittleEndian.AppendUint32(out, n) }
		if op == 2004 {
			le(uint32(16 + 20 + len(raw)))
			le(1)
			out = append(out, id...)
			le(1) // OP_REPLY
			le(8)
			le(0)
			le(0)
			le(0)
			le(1)
		} else {
			le(uint32(16 + 5 + len(raw)))
			le(1)
			out = append(out, id...)
			le(2013)
			le(0)
			out = append(out, 0)
		}
		if _, err := c.Write(append(out, raw...)); err != nil {
			return
		}
	}
}

// readMsg reads the sections of a message into one command.
func readMsg(b []byte) (cmd bson.D, err error) {
	if len(b) < 4 {
		return nil, errors.New("short message")
	}
	if b[0]&1 != 0 {
		b = b[:len(b)-4] // checksum
	}
	var more []bson.E
	for b = b[4:]; len(b) > 5; {
		kind, size := b[0], int(binary.LittleEndian.Uint32(b[1:]))
		if size < 5 || size > len(b)-1 {
			return nil, errors.New("bad section")
		}
		sect := b[1 : 1+size]
		b = b[1+size:]
		if kind == 0 {
			if err = bson.Unmarshal(sect, &cmd); err != nil {
				return
			}
			continue
		}
		sect = sect[4:]
		i := bytes.IndexByte(sect, 0)
		if i < 0 {
			return nil, errors.New("bad section")
		}
		var docs bson.A
		for d := sect[i+1:]; len(d) >= 5; {
			n := int(binary.LittleEndian.Uint32(d))
			if n < 5 || n > len(d) {
				return nil, errors.New("bad document")
			}
			var x bson.D
			if err = bson.Unmarshal(d[:n], &x); err != nil {
				return
			}
			docs = append(docs, x)
			d = d[n:]
		}
		more = append(more, bson.E{Key: string(sect[:i]), Value: docs})
	}
	return append(cmd, more...), nil
}

func (f *fakeMongo) answer(db string, cmd bson.D) bson.D {
	f.mu.Lock()
	defer f.mu.Unlock()
	name, _ := cmd[0].Value.(string)
	ns := db + "." + name
	ok := bson.E{Key: "ok", Value: 1.0}
	arg := func(k string) interface{} {
		for _, e := range cmd {
			if e.Key == k {
				return e.Value
			}
		}
		return nil
	}
	failed := func(code int32, msg string) bson.D {
		return bson.D{{Key: "ok", Value: 0.0}, {Key: "code", Value: code}, {Key: "errmsg", Value: msg}}
	}
	command := strings.ToLower(cmd[0].Key)
	if command == f.fault {
		return failed(13, "not authorized")
	}
	reply := func(batch string, docs bson.A, ns string) bson.D {
		id := int64(0)
		f.left = nil
		if f.batch > 0 && len(docs) > f.batch {
			id, docs, f.left = 7, docs[:f.batch], docs[f.batch:]
		}
		return bson.D{{Key: "cursor", Value: bson.D{{Key: "id", Value: id}, {Key: "ns", Value: ns}, {Key: batch, Value: docs}}}, ok}
	}
	switch command {
	case "ismaster", "hello":
		return bson.D{{Key: "ismaster", Value: true}, {Key: "maxBsonObjectSize", Value: int32(1 << 24)}, {Key: "maxMessageSizeBytes", Value: int32(48000000)},
			{Key: "maxWriteBatchSize", Value: int32(100000)}, {Key: "minWireVersion", Value: int32(0)}, {Key: "maxWireVersion", Value: int32(8)}, ok}
	case "drop":
		if _, has := f.data[ns]; !has {
			return failed(26, "ns not found")
		}
		delete(f.data, ns)
		return bson.D{ok}
	case "insert":
		docs, _ := arg("documents").(bson.A)
		for _, d := range docs {
			f.data[ns] = append(f.data[ns], d.(bson.D))
		}
		return bson.D{{Key: "n", Value: int32(len(docs))}, ok}
	case "find":
		filter, _ := arg("filter").(bson.D)
		out := bson.A{}
		for _, d := range f.data[ns] {
			flat := document{}
			flatten("", d, flat)
			hit, err := match(filter, flat)
			if err != nil {
				return failed(2, err.Error())
			}
			if hit {
				out = append(out, d)
			}
		}
		return reply("firstBatch", out, ns)
	case "getmore":
		coll, _ := arg("collection").(string)
		return reply("nextBatch", f.left, db+"."+coll)
	case "endsessions", "killcursors", "ping":
		return bson.D{ok}
	}
	return failed(59, "no such command: "+cmd[0].Key)
}

func flatten(prefix string, d bson.D, out document) {
	for _, e := range d {
		out[prefix+e.Key] = e.Value
		if sub, ok := e.Value.(bson.D); ok {
			flatten(prefix+e.Key+".", sub, out)
		}
	}
}
