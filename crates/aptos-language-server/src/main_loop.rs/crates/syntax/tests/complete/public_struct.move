module 0x1::public_struct {
    public struct S { }
    public(friend) struct S { }
    public(package) struct S { }
    package struct S { }
    friend struct S { }
}
