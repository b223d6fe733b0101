package main

import (
	"sort"

	"gpsverif/sim"
)

// disk is a simulated disk: writes become durable only when synchronised, and
// a crash keeps, loses, tears or reorders the blocks not yet durable.
type disk struct {
	c     *Ctx
	r     *sim.Stream
	block int
	files map[string]*dfile
}

type dfile struct {
	data    []byte // durable
	now     []byte // as the process sees it
	pending []dwrite
}

type dwrite struct {
	off  int
	data []byte
	size int // file size after the write, if no data
}

func newDisk(c *Ctx, r *sim.Stream) *disk {
	return &disk{c: c, r: r, block: pick(r, 16, 64, 512, 4096), files: map[string]*dfile{}}
}

func (d *disk) file(name string) *dfile {
	if d.files[name] == nil {
		d.files[name] = &dfile{}
	}
	return d.files[name]
}

// write replaces the contents of a file in place, block by block.
func (d *disk) write(name string, b []byte, yield bool) {
	f := d.file(name)
	f.now = append([]byte{}, b...)
	f.pending = append(f.pending, dwrite{size: len(b), off: -1})
	for i := 0; i < len(b); i += d.block {
		j := min(i+d.block, len(b))
		f.pending = append(f.pending, dwrite{off: i, data: append([]byte{}, b[i:j]...)})
		if yield {
			sim.ForceYield()
		}
	}
}

func (d *disk) sync(name string) {
	f := d.file(name)
	f.data = append([]byte{}, f.now...)
	f.pending = nil
}

// rename is atomic and durable at once; the contents are what they are.
func (d *disk) rename(from, to string) {
	d.files[to] = d.file(from)
	delete(d.files, from)
}

// crash loses the process; every write that is not durable may have happened,
// in part or not at all, regardless of the others.
func (d *disk) crash() {
	var names []string
	for n := range d.files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := d.files[n]
		b := append([]byte{}, f.data...)
		for _, w := range f.pending {
			switch {
			case w.off < 0:
				if d.r.Intn(2) == 0 {
					d.c.count("disk_lost_resize")
					continue
				}
				for len(b) < w.size {
					b = append(b, 0)
				}
				b = b[:w.size]
			case d.r.Intn(3) == 0:
				d.c.count("disk_lost_block")
			default:
				x := w.data
				if d.r.Intn(4) == 0 && len(x) > 1 {
					x = x[:1+d.r.Intn(len(x)-1)]
					d.c.count("disk_torn_block")
				}
				for len(b) < w.off+len(x) {
					b = append(b, 0)
				}
				copy(b[w.off:], x)
			}
		}
		f.data, f.now, f.pending = b, append([]byte{}, b...), nil
	}
	d.c.count("process_crash")
}

func (d *disk) read(name string) []byte {
	f := d.files[name]
	if f == nil {
		return nil
	}
	return append([]byte{}, f.now...)
}

// ---- damage of stored bytes ----

// damage applies one fault of a storage or transfer to the data; other is an
// older version of the same file.
func damage(c *Ctx, r *sim.Stream, b, other []byte) []byte {
	b = append([]byte{}, b...)
	if len(b) == 0 {
		return b
	}
	rng := func(max int) (int, int) {
		i := r.Intn(len(b))
		n := 1 + r.Intn(min(max, len(b)-i))
		return i, i + n
	}
	switch k := r.Intn(11); k {
	case 0:
		c.count("damage_truncated")
		return b[:r.Intn(len(b))]
	case 1, 2:
		c.count("damage_torn")
		i := r.Intn(len(b) + 1)
		if k == 2 { // at a block
			i = i / 64 * 64
		}
		if r.Intn(2) == 0 {
			if i < len(other) {
				return append(b[:i:i], other[i:]...)
			}
			return b[:i]
		}
		return append(append([]byte{}, other[:min(i, len(other))]...), b[i:]...)
	case 3:
		c.count("damage_missing")
		i, j := rng(pick(r, 1, 4, 40, 4000))
		return append(b[:i:i], b[j:]...)
	case 4:
		c.count("damage_repeated")
		i, j := rng(pick(r, 1, 4, 40, 4000))
		return append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
	case 5:
		c.count("damage_zeroed")
		i, j := rng(pick(r, 1, 8, 64, 512))
		for ; i < j; i++ {
			b[i] = 0
		}
		return b
	case 6:
		c.count("damage_burst")
		i, j := rng(8)
		for ; i < j; i++ {
			b[i] = byte(r.Uint64())
		}
		return b
	case 7:
		c.count("damage_swapped")
		n := 1 + r.Intn(64)
		if len(b) < 2*n {
			return b
		}
		i, j := r.Intn(len(b)-n), r.Intn(len(b)-n)
		x := append([]byte{}, b[i:i+n]...)
		copy(b[i:i+n], b[j:j+n])
		copy(b[j:j+n], x)
		return b
	}
	c.count("damage_bitflip")
	for k := 0; k < 1+r.Intn(3); k++ {
		b[r.Intn(len(b))] ^= 1 << r.Intn(8)
	}
	return b
}
