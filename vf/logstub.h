/* logging has no influence on behaviour: replaced by nothing (formats are not read) */
void LogWrite(uint32_t level,uint32_t category,char *fmt,...) { }
