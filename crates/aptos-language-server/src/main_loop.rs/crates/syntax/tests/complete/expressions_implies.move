module M {
    spec module {
        a ==> b;
        a <==> b;
        a < x && y ==> x;
        a <= x && y <==> x;
    }
}