module 0x1::public_enum {
    public enum S { }
    public(friend) enum S { }
    public(package) enum S { }
    package enum S { }
    friend enum S { }
}
