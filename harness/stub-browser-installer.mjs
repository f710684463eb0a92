// A browser is installed already.
export const ensureBrowser = async () => "/chrome";
