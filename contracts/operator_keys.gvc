package workers/operator

props C05 C03 C10 C01

// the key group of subject key k in key space ks
define groupOf(ks, k) = mmhash(view(k), 0) % ks.keyGroupCount

func (*KeyedStateStore).encodeSubjectKey(s, subjectKey) (buf)
	requires spaceOK(s.keySpace) && len(subjectKey) < 4294967296
	ensures len(buf) == 7 + len(subjectKey) && fresh(buf)
	ensures buf[0] * 256 + buf[1] == groupOf(s.keySpace, subjectKey) && buf[2] == 0
	ensures buf[3] * 16777216 + buf[4] * 65536 + buf[5] * 256 + buf[6] == len(subjectKey)
	ensures forall i: int {buf[7+i]} {subjectKey[i]} :: 0 <= i < len(subjectKey) ==> buf[7+i] == subjectKey[i]

// bytes that hold the length of namespace ns: one, or for long ones five (a 255 marker and 4 bytes)
define nsHead(n) = n < 255 ? 1 : 5

func (*KeyedStateStore).encodeDBKey(s, subjectKey, namespace, data) (buf)
	requires spaceOK(s.keySpace) && len(subjectKey) < 4294967296 && len(namespace) < 4294967296
	ensures len(buf) == 7 + len(subjectKey) + nsHead(len(namespace)) + len(namespace) + len(data) && fresh(buf)
	ensures buf[0] * 256 + buf[1] == groupOf(s.keySpace, subjectKey) && buf[2] == 0
	ensures buf[3] * 16777216 + buf[4] * 65536 + buf[5] * 256 + buf[6] == len(subjectKey)
	ensures forall i: int {buf[7+i]} {subjectKey[i]} :: 0 <= i < len(subjectKey) ==> buf[7+i] == subjectKey[i]
	ensures len(namespace) < 255 ==> buf[7 + len(subjectKey)] == len(namespace)
	ensures len(namespace) >= 255 ==> buf[7 + len(subjectKey)] == 255
	ensures len(namespace) >= 255 ==> buf[8 + len(subjectKey)] * 16777216 + buf[9 + len(subjectKey)] * 65536 + buf[10 + len(subjectKey)] * 256 + buf[11 + len(subjectKey)] == len(namespace)
	ensures forall i: int {buf[7+len(subjectKey)+nsHead(len(namespace))+i]} {namespace[i]} :: 0 <= i < len(namespace) ==> buf[7+len(subjectKey)+nsHead(len(namespace))+i] == namespace[i]
	ensures forall i: int {buf[7+len(subjectKey)+nsHead(len(namespace))+len(namespace)+i]} {data[i]} :: 0 <= i < len(data) ==> buf[7+len(subjectKey)+nsHead(len(namespace))+len(namespace)+i] == data[i]

// a point of time as 8 bytes whose order is the order of time: nanoseconds since the epoch, sign bit flipped
define be8(b, o) = ((((((b[o] * 256 + b[o+1]) * 256 + b[o+2]) * 256 + b[o+3]) * 256 + b[o+4]) * 256 + b[o+5]) * 256 + b[o+6]) * 256 + b[o+7]

func (*TimerStore).encodeTimerKey(s, subjectKey, t) (kg, key)
	props C05 C10
	requires spaceOK(s.keySpace)
	requires 0 - 9223372036854775808 <= t < 9223372036854775808
	ensures kg == groupOf(s.keySpace, subjectKey)
	ensures len(key) == 11 + len(subjectKey) && fresh(key)
	ensures key[0] * 256 + key[1] == kg && key[2] == 1
	ensures be8(key, 3) == t + 9223372036854775808
	ensures forall i: int {key[11+i]} {subjectKey[i]} :: 0 <= i < len(subjectKey) ==> key[11+i] == subjectKey[i]

func (*TimerStore).timerFromBytes(s, b) (tm)
	props C10
	requires len(b) >= 11
	ensures tm.Timestamp == be8(b, 3) - 9223372036854775808
	ensures len(tm.Key) == len(b) - 11
	ensures forall i: int {tm.Key[i]} :: 0 <= i < len(b) - 11 ==> tm.Key[i] == b[11+i]
	ensures tm.kg == b[0] * 256 + b[1]
	ensures view(tm.dbKey) == view(b)

func (*OperatorPartition).OwnsKey(o, key) (r)
	props C05 C06
	requires len(key) >= 2
	ensures r <==> o.keyGroupRange.Start <= key[0] * 256 + key[1] < o.keyGroupRange.End
