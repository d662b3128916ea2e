script {
    fun main() {
        b"(false: bool);";
        x"0101";
        x"";
        b"\t\n\r\0";
        b"\\";
        b"\"";
        b"\x01";
    }
}
