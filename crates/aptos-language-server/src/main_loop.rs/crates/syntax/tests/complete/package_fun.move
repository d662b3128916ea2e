module 0x1::package_fun {
    package fun main1() {}
    package inline fun main2() {}
    package native fun main3();
    package entry fun main4();
}
