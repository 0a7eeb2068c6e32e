package main

// The containers: lists, sets, options, cached values.

func init() {
	register("L01", "Every operation on lists, sets, options and cached values is compared, on every path, with a reference: what it returns, what it changes, and which elements it reaches.", ruleL01)
}

func ruleL01(c *Ctx) {
	c.rule("list", "an operation on lists reaches every element, in its place, and only changes the list it is given as a pointer", 12)
	c.rule("set", "an operation on sets finds, adds and removes exactly the elements it should, and leaves the sets it is given as they are", 12)
	c.rule("other", "options, alternatives and cached values", 4)
	s := same{}
	list := func(key, ref string, opaque ...string) { s.opaque = opaque; c.sameAs("list", key, "Lib."+ref, s) }
	list("Lib.ListMap", "refListMap")
	list("Lib.MkList", "refMkList")
	list("(*Lib.List[T]).Append", "refLAppend")
	list("(Lib.List[T]).Equals", "refLEquals")
	list("Lib.ListEquals", "refListEquals")
	list("(Lib.List[T]).Copy", "refLCopy")
	list("Lib.ListCpy", "refListCpy")
	list("(Lib.List[T]).Contains", "refLContains")
	list("Lib.ListMem", "refListMem")
	list("(*Lib.List[T]).Add", "refLAdd")
	list("Lib.ListAdd", "refListAdd")
	list("(Lib.List[T]).Find", "refLFind")
	list("(Lib.List[T]).IndexOf", "refLIndexOf")
	list("Lib.ListIndexOf", "refListIndexOf")
	list("(Lib.List[T]).RemoveAt", "refLRemoveAt")
	list("(Lib.List[T]).Any", "refLAny")
	list("(Lib.List[T]).Filter", "refLFilter")
	list("(Lib.List[T]).Slice", "refLSlice")
	list("(Lib.List[T]).Get", "refLGet")
	list("(Lib.List[T]).ToString", "refLToString")
	list("(Lib.ComparableList[T]).Equals", "refCLEquals")
	list("(Lib.ComparableList[T]).Contains", "refCLContains")
	list("(Lib.StrictlyOrderedList[T]).Less", "refSOLess")
	list("(Lib.StrictlyOrderedList[T]).Swap", "refSOSwap")

	set := func(key, ref string, opaque ...string) { s.opaque = opaque; c.sameAs("set", key, "Lib."+ref, s) }
	all := []string{"Lib.rebalance", "Lib.insert", "Lib.remove", "Lib.elements", "Lib.find", "Lib.minValue", "Lib.mkBranch", "Lib.mkNode", "Lib.rotateLeft", "Lib.rotateRight"}
	set("Lib.mkBranch", "refMkBranch", "Lib.height")
	set("Lib.height", "refHeight")
	set("Lib.balance", "refBalance", "Lib.height")
	set("Lib.rotateLeft", "refRotateLeft", "Lib.mkBranch")
	set("Lib.rotateRight", "refRotateRight", "Lib.mkBranch")
	set("Lib.rebalance", "refRebalance", "Lib.mkBranch", "Lib.rotateLeft", "Lib.rotateRight", "Lib.balance")
	set("Lib.insert", "refInsert", all...)
	set("Lib.remove", "refRemove", all...)
	set("Lib.minValue", "refMinValue", all...)
	set("Lib.elements", "refElements", all...)
	set("Lib.find", "refFind", all...)
	set("Lib.cardinal", "refCardinal", all...)
	set("Lib.nodeCpy", "refNodeCpy", all...)
	set("(Lib.Set[T]).Add", "refSAdd", all...)
	set("(Lib.Set[T]).Remove", "refSRemove", all...)
	set("(Lib.Set[T]).Union", "refSUnion", all...)
	set("(Lib.Set[T]).Inter", "refSInter", all...)
	set("(Lib.Set[T]).Diff", "refSDiff", all...)
	set("(Lib.Set[T]).Disjoint", "refSDisjoint", all...)
	set("(Lib.Set[T]).Filter", "refSFilter", all...)
	set("(Lib.Set[T]).Contains", "refSContains", all...)
	set("Lib.Singleton", "refSingleton", all...)

	s.nz = &normal{whole: true}
	other := func(key, ref string, opaque ...string) { s.opaque = opaque; c.sameAs("other", key, "Lib."+ref, s) }
	other("Lib.EitherEquals", "refEitherEquals")
	other("Lib.EitherCpy", "refEitherCpy")
	other("Lib.OptBind", "refOptBind")
	other("(*Lib.Cache[T, U]).Get", "refCacheGet")
	other("(Lib.Cache[T, U]).Copy", "refCacheCopy")
	other("(*Lib.Cache[T, U]).AvoidUpd", "refCacheAvoid")
	other("Lib.GenericParallel", "refGenericParallel")
}
