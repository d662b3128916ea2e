module test::test{
    use dep1::a;
    fun test_function(a: a::A) {
        
    }
}