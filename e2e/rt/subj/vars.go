package subj

type Conf struct {
	N    int
	S    string
	Sub  Sub
	P    *Sub
	M    map[string]int
	Fn   func(int) int
	List []int
}

type Sub struct{ K int }

func (s Sub) Val() int   { return s.K }
func (s *Sub) Ptr() int  { return s.K }
func (s *Sub) Set(k int) { s.K = k }

type MyInt int

func (m MyInt) Get() int   { return int(m) }
func (m *MyInt) Inc()      { *m++ }
func (m *MyInt) PGet() int { return int(*m) }

var (
	VInt    int         = 1
	VStr                = "s"
	VMy     MyInt       = 5
	VStruct             = Conf{N: 1, S: "a", Sub: Sub{2}, P: &Sub{3}, M: map[string]int{"k": 4}, List: []int{5, 6}}
	VPtr                = &Conf{N: 11, Sub: Sub{12}}
	VArr    [2]int      = [2]int{1, 2}
	VSlice              = []int{1, 2}
	VMap                = map[string]int{"a": 1}
	VIface  interface{} = 7
	VOther  int         = 100
)

const CInt = 42

func RInt() int              { return VInt }
func RIntPtr() int           { p := &VInt; return *p }
func RIntExpr() int          { return VInt + VInt*10 + VOther }
func WInt(x int)             { VInt = x }
func WIntOp(x int)           { VInt += x; VInt++ }
func WIntPtr(x int)          { p := &VInt; *p = x }
func RIntMulti() (int, int)  { a, b := VInt, VInt; return a, b }
func RIntShadow() int        { VInt := 77; return VInt }
func RIntParam(VInt int) int { return VInt }
func RIntClosure() int       { f := func() int { return VInt }; return f() }
func RIntLoop() int {
	s := 0
	for i := 0; i < VInt; i++ {
		s++
	}
	return s
}
func RIntSwitch() string {
	switch VInt {
	case 1:
		return "one"
	case 2:
		return "two"
	}
	return "other"
}
func RIntAddrCall() int      { return deref(&VInt) }
func deref(p *int) int       { return *p }
func RStr() string           { return VStr + "!" }
func WStr(s string)          { VStr = s }
func RMyGet() int            { return VMy.Get() }
func RMyConv() int           { return int(VMy) }
func WMyInc()                { VMy.Inc() }
func RMyPGet() int           { return VMy.PGet() }
func RStructN() int          { return VStruct.N }
func RStructSub() int        { return VStruct.Sub.K }
func RStructSubVal() int     { return VStruct.Sub.Val() }
func RStructSubPtr() int     { return VStruct.Sub.Ptr() }
func RStructP() int          { return VStruct.P.K }
func RStructM() int          { return VStruct.M["k"] }
func RStructList() int       { return VStruct.List[1] }
func RStructCopy() Conf      { return VStruct }
func WStructN(x int)         { VStruct.N = x }
func WStructSub(x int)       { VStruct.Sub.K = x }
func WStructSubSet(x int)    { VStruct.Sub.Set(x) }
func WStruct(c Conf)         { VStruct = c }
func RStructAddr() *Conf     { return &VStruct }
func RStructFieldAddr() *int { return &VStruct.N }
func RPtrN() int             { return VPtr.N }
func RPtrSub() int           { return VPtr.Sub.Ptr() }
func WPtrN(x int)            { VPtr.N = x }
func WPtr(p *Conf)           { VPtr = p }
func RPtr() *Conf            { return VPtr }
func RArr(i int) int         { return VArr[i] }
func WArr(i, x int)          { VArr[i] = x }
func RArrLen() int           { return len(VArr) }

func RSlice(i int) int { return VSlice[i] }
func WSliceI(i, x int) { VSlice[i] = x }
func WSlice(x ...int)  { VSlice = append(VSlice, x...) }
func RSliceLen() int   { return len(VSlice) }
func RSliceRange() int {
	s := 0
	for _, x := range VSlice {
		s += x
	}
	return s
}
func RMap(k string) int    { return VMap[k] }
func WMap(k string, v int) { VMap[k] = v }
func DMap(k string)        { delete(VMap, k) }
func RMapLen() int         { return len(VMap) }
func RIface() int          { x, _ := VIface.(int); return x }
func WIface(x interface{}) { VIface = x }
func RConst() int          { return CInt + 1 }

func RStrLen() int             { return len(VStr) }
func RStrIdx() int             { return int(VStr[0]) }
func RStrCmp(x string) bool    { return VStr == x }
func RStrPtr() *string         { return &VStr }
func RPtrDeref() Conf          { return *VPtr }
func RArrCopy() [2]int         { return VArr }
func WSliceSet(x []int)        { VSlice = x }
func WMapSet(x map[string]int) { VMap = x }
func RIfaceNil() bool          { return VIface == nil }
func RMyVal() MyInt            { return VMy }
func RMyConvGet() int          { return MyInt(VMy).Get() }
func WMy(x MyInt)              { VMy = x }

func VIntRead() int    { return VInt }
func VIntReadPtr() int { p := &VInt; return *p }
