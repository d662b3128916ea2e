module 0x1::split {
    spec main {} proof {
        split 1 + 1;
    }
}
