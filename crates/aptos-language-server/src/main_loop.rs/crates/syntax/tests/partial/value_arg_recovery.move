module 0x1::value_arg_recovery {
    fun main() {
        call(1,,, 2+, &&&<>, err<, call[, assert!, |a| a +, |b| call() +, ..,);
    }
}
