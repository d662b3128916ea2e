module 0x1::assert_in_lambda {
    fun main(
        f: |Element, assert!, assert!(), call(| Element,
    ) {

    }
}
