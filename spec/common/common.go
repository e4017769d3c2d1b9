package common

func zzAssume(bool)

//vg:spec ReverseBytes props=C28,C29 inst=a0:0 inst=a0:1 inst=a0:2 inst=a0:7 inst=a0:32 inst=a0:64 inst=a0:80
func zzReverse(b []byte) []byte {
	out := make([]byte, len(b))
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}
