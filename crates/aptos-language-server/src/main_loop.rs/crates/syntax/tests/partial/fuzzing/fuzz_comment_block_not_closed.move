// line
script {
/* block */
/**
multiline
*/
/** /* nest */