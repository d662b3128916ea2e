script {
    fun main() {
        *a = 3;
        record.val = 1;
        (record.val = 1);

        call().operator = 11;
        call().operator.main() = 11;
    }
}
